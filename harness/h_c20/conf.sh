PKGS="transport/wasmrs/host proxy rx/flux rx/mono internal/buffer"
VIRT="frref"
EXTRA="$REPO/internal/zzverif/$DIR/ends.go=$VERIF_DIR/harness/h_c16/ends.go"
