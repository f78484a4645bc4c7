from d_covar import replay_lik as replay  # noqa
