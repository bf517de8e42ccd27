import sys
from .check import main
sys.exit(main())
