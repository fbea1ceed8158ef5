import sys
from .main import main
main(sys.argv[1:])
