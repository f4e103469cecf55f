PKGS="rx/flux rx/mono transform proxy"
