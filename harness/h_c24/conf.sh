PKGS="types/uuid"
