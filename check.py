#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from mkv import driver
if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1]))
