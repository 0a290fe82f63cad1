#!/bin/bash
# Warms the Go build cache so that the first check does not pay for a cold build.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
go build -overlay overlay/overlay.json ./deps/ ./gens/ ./vlib/
