#!/bin/bash
exec timeout 250 python3 -B "$(dirname "$0")/demo.py"
