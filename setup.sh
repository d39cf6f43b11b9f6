#!/bin/bash
# One-off preparation: unpack the pure-Python test libraries, compile the extensions.
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/run" --setup
