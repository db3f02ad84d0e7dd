#!/bin/bash
# warms the Go build cache; every check still builds what it needs from source
. /opt/vp/env.sh 2>/dev/null
cd "$(dirname "$0")/vcg" && GOFLAGS=-mod=mod GOSUMDB=off go build -o /dev/null . 
