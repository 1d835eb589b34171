import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['TZ'] = 'UTC'
from symex import runner  # noqa: E402
sys.exit(runner.main(sys.argv[1:]))
