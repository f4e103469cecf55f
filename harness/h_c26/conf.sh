PKGS="transport/rsocket internal/buffer handler proxy rx/flux rx/mono internal/socket"
VIRT="vnet"
NET=vnet
LEVEL=1
