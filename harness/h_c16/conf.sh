PKGS="handler proxy rx/flux rx/mono"
VIRT="peers"
