PKGS="rx/flux rx/mono rx/flow"
