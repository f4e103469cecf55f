PKGS=""
LEVEL=0
VIRT="wguest"
STUBSRC=1
# the program as it is
prepare() {
  (cd "$REPO" && go build -o "$1/tool" ./transport/wasmrs/cmd/wasmrs-ops) >"$1/log" 2>&1 || { cat "$1/log"; echo "cannot build wasmrs-ops"; exit 2; }
  mkdir -p "$1/scratch"
  chmod 755 "$1" "$1/scratch" # for a user without privileges
  export VERIF_TOOL="$1/tool" VERIF_SCRATCH="$1/scratch"
}
