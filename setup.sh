#!/bin/bash
# builds what does not depend on /repo: the Java operators of the specification
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, 'driver')
import common; print(common.java_classes())"
