export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
