#!/usr/bin/env python3
"""check.py ID: decides one property from /repo's current source."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vkdriver
import registry

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(vkdriver.main(prop, registry.PROPS[prop]))
