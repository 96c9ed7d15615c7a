"""Entry point of every check: python3 -B -m dst.run C02 [options]."""
import sys
from dst.runner import main

sys.exit(main())
