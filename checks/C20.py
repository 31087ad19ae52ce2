import sys
from vlib import *
with_locales("C20", LOCALES, [], sys.argv[1:])
