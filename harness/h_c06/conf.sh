PKGS=""
LEVEL=0
VIRT="frref"
