PKGS="transport/wasmrs/mesh transport/wasmrs/host proxy rx/flux rx/mono internal/buffer"
VIRT="frref"
Z22="$REPO/internal/zzverif/$DIR"
EXTRA="$Z22/ends.go=$VERIF_DIR/harness/h_c16/ends.go,$Z22/raw.go=$VERIF_DIR/harness/h_c20/raw.go,$Z22/guest.go=$VERIF_DIR/harness/h_c20/guest.go"
export VERIF_SCRATCH="$T"
