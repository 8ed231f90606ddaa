# Sourced by run.sh and setup.sh: the toolchain the repository is built with.
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
