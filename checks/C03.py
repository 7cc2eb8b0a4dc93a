import types

from checks import _inputs
from checks._session import make

globals().update(make("C03", 350, 7000, obs=1))
PARTS = [types.SimpleNamespace(**make("C03", 350, 7000, obs=1)), _inputs]
