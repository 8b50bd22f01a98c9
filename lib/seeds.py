#!/usr/bin/env python3
import sys
from seedlib import go
from seedspecs import SEEDS
go(SEEDS, sys.argv[1:])
