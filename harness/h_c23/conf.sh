PKGS=""
LEVEL=0
