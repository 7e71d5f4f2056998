#!/bin/bash
V=$(cd "$(dirname "$0")" && pwd)
exec "$V/build.sh" release
