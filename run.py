# -*- coding: utf-8 -*-
""" Runs the check of one property; see lib/common.py """
import os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache' # never read a stale __pycache__ from /repo
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import common
if __name__ == '__main__':
    sys.exit(common.main(sys.argv[1:]))
