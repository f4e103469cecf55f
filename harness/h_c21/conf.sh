PKGS="transport/wasmrs/guest proxy rx/flux rx/mono"
VIRT="frref"
TAGS=wasi
LEVEL=1
Z21="$REPO/internal/zzverif/$DIR"
EXTRA="$Z21/ends.go=$VERIF_DIR/harness/h_c16/ends.go,$Z21/raw.go=$VERIF_DIR/harness/h_c20/raw.go,$Z21/calls.go=$VERIF_DIR/harness/h_c20/calls.go"
STUBSRC=1
# what the WebAssembly host provides is provided by the harness; its state is reached, whatever it is called
prepare() {
  G="$("$1/vinstr" -guest "$REPO/transport/wasmrs/guest" -out "$1")" || { echo "cannot prepare the guest"; exit 2; }
  EXTRA="$EXTRA,$G"
}
