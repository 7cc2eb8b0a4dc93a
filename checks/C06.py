from checks._session import make

globals().update(make("C06", 220, 5000, obs=1))
