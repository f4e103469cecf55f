PKGS=""
VIRT="frref"
LEVEL=0
