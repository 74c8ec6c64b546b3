#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
import main
sys.exit(main.run(sys.argv[1:]))
