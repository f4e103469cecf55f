PKGS=""
VIRT="mpref"
LEVEL=0
