PKGS="internal/socket handler proxy rx/flux rx/mono invoke"
