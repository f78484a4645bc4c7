"""Driver process: main.py MODULE IN OUT PER_SCENARIO_SECONDS"""
import importlib
import json
import logging
import os
import signal
import sys
import time
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import enc  # noqa


class ScenarioTimeout(BaseException):
    pass


def on_alarm(*_):
    raise ScenarioTimeout()


class Crit(logging.Handler):
    """Counts the critical messages of the code under test."""
    n = 0

    def emit(self, record):
        if record.levelno >= logging.CRITICAL:
            Crit.n += 1


def main():
    logging.getLogger('runlmc').addHandler(Crit())
    mod = importlib.import_module(sys.argv[1])
    with open(sys.argv[2]) as f:
        batch = json.load(f)
    per = int(float(sys.argv[4]))
    signal.signal(signal.SIGALRM, on_alarm)
    end = float(os.environ.get('VERIF_END', 'inf'))
    hung = 0
    with open(sys.argv[3], 'a') as out:
        for b in batch:
            if time.time() > end or hung >= 3:
                return      # the runner knows
            ev = []
            Crit.n = 0
            signal.alarm(per)
            try:
                mod.replay(b['sc'], ev)
            except ScenarioTimeout:
                ev.append({'op': 'timeout', 'o': {'k': 'timeout'}})
                hung += 1
            except Exception as x:  # escaped from the code under test
                traceback.print_exc()
                ev.append({'op': 'escaped', 'o': enc.exc(x)})
            finally:
                signal.alarm(0)
            for e in ev:
                e['crit'] = Crit.n > 0
            out.write(json.dumps({'id': b['id'], 'sc': b['sc'], 'ev': ev}) + '\n')
            out.flush()


if __name__ == '__main__':
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(7)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
