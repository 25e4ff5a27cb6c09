#!/bin/bash
# builds the MIR facts driver (each check rebuilds it if it is missing)
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, '.')
from sa import facts
print(facts.build_driver())"
