"""Imports every module that registers scenarios."""
from . import s_density  # noqa: F401
from . import s_linear, s_st  # noqa: F401
from . import s_data  # noqa: F401
from . import s_plot  # noqa: F401
from . import s_misc  # noqa: F401
from . import s_examples  # noqa: F401
