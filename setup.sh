#!/bin/bash
# setup.sh: build the checker from the committed, vendored sources
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
cd checker && GOFLAGS=-mod=vendor go build -mod=vendor -o ../bin/checker . 
