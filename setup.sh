#!/bin/bash
# Compiles the instrumenter once, as a check that the tools needed are here.  Checks build what they need.
cd "$(dirname "$0")/instr" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off go build -o /dev/null . && echo ok
