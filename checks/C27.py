import sys
from vlib import *
wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]
with_locales("C27", [("de_DE", "UTF-8"), ("tr_TR", "ISO-8859-9")], wrap, sys.argv[1:])
