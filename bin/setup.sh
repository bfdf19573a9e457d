#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec "$here/build.sh" mc deep mct capi pyapi
