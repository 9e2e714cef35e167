#!/bin/bash
# Nothing is compiled: the simulator runs glompo from /repo's working tree. This confirms that it can be loaded.
cd "$(dirname "$0")" && . ./env.sh
/opt/venv-pypy/bin/python -c "
import sys; sys.path.insert(0, '.')
from sim import session; session.boot('/repo'); print('simulator ready')"
