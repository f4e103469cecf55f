PKGS="rx/flux rx/mono transform"
