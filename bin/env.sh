# Sourced: sets up, in a scratch directory $SCR, everything needed to build and analyse
# /repo's current tree (including the packages build.sh leaves out) without writing to /repo.
set -u
VERIF=${VERIF:-/verif}
REPO=${REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
GO124=/opt/veriftools/go1.24.13
mkdir -p "$VERIF/build"
SCR=$(mktemp -d "${TMPDIR:-/tmp}/gvc.XXXXXX") || exit 2
trap 'case "$SCR" in */gvc.??????) rm -rf "$SCR";; esac' EXIT
export SCR VERIF REPO
export GVC_PROTOC_GEN_GO=/opt/vp/tools/protoc-gen-go
export GVC_PROTOC_GEN_CONNECT=/opt/vp/tools/protoc-gen-connect-go

prepare() {
  # 1. protocol stand-in module (reduction-protocol is not available offline)
  local st="$SCR/protocol" p
  cp -r "$VERIF/stubs/reduction-protocol" "$st" || return 1
  (cd "$st" && protoc -I . --plugin=protoc-gen-go=$GVC_PROTOC_GEN_GO --go_opt=paths=source_relative --go_out=. \
     --plugin=protoc-gen-connect-go=$GVC_PROTOC_GEN_CONNECT --connect-go_opt=paths=source_relative --connect-go_out=. \
     */*.proto) || return 1
  # 2. generated code for /repo's own protos, laid over the tree
  mkdir -p "$SCR/gen"
  (cd "$REPO" && for p in $(find proto connectors -name '*.proto' | sort); do
     protoc -I . -I "$st" --plugin=protoc-gen-go=$GVC_PROTOC_GEN_GO --go_opt=paths=source_relative --go_out="$SCR/gen" \
       --plugin=protoc-gen-connect-go=$GVC_PROTOC_GEN_CONNECT --connect-go_opt=paths=source_relative --connect-go_out="$SCR/gen" "$p" || exit 1
   done) || return 1
  # 3. module file
  cp "$REPO/go.mod" "$SCR/go.mod" && cp "$REPO/go.sum" "$SCR/go.sum" || return 1
  (cd "$SCR" && GOROOT=$GO124 PATH=$GO124/bin:$PATH GOFLAGS= go mod edit -droprequire=reduction.dev/reduction-go \
     -replace=reduction.dev/reduction-protocol="$st" go.mod) || return 1
  # 4. overlay: generated files only (tests are added by the harness runner)
  python3 - "$SCR" "$REPO" > "$SCR/overlay.json" <<'PY'
import sys,os,json
scr,repo=sys.argv[1:3]
m={}
g=os.path.join(scr,'gen')
for d,_,fs in os.walk(g):
    for f in fs:
        p=os.path.join(d,f); m[os.path.join(repo,os.path.relpath(p,g))]=p
# generated files present in the tree but not generated by us are hidden
for base in ('proto','connectors'):
    for d,_,fs in os.walk(os.path.join(repo,base)):
        for f in fs:
            if f.endswith('.pb.go') or f.endswith('.connect.go'):
                m.setdefault(os.path.join(d,f),'')
json.dump({'Replace':m},sys.stdout)
PY
}
repo_go() { # run go 1.24 in /repo with the scratch module file
  (cd "$REPO" && GOROOT=$GO124 PATH=$GO124/bin:$PATH GOEXPERIMENT=synctest GOFLAGS="-modfile=$SCR/go.mod -mod=mod" go "$@")
}
