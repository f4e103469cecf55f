PKGS="transport/rsocket internal/buffer handler proxy rx/flux rx/mono"
VIRT="frref"
