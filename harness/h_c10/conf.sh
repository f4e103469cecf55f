PKGS="invoke rx/flux rx/mono"
