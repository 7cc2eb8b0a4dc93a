from checks._session import make

globals().update(make("C01", 400, 9000, obs=0))
