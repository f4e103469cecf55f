PKGS="internal/buffer"
