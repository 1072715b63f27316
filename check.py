#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vc'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts'))
import runner
sys.exit(runner.main(sys.argv[1:]))
