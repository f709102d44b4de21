# environment of every build the checks do; nothing of it lies in /repo or /opt/vp
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOENV=off LANG=C.UTF-8 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=
export GOPATH="${GOPATH:-/root/go}"
export GOCACHE="${VERIF_GOCACHE:-/root/.cache/go-build}"
export GOWORK=/opt/vp/go.work
