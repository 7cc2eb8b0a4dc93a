from checks._session import make

globals().update(make("C02", 400, 9000, obs=1))
