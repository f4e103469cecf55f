PKGS=""
LEVEL=0
VIRT="wguest mpref"
STUBSRC=1
# the program as it is
prepare() {
  (cd "$REPO/transport/wasmrs/cmd/wasmrs" && go build -o "$1/tool" .) >"$1/log" 2>&1 || { cat "$1/log"; echo "cannot build wasmrs"; exit 2; }
  mkdir -p "$1/scratch"
  export VERIF_TOOL="$1/tool" VERIF_SCRATCH="$1/scratch"
}
