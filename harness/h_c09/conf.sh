PKGS="proxy"
