"""symex: a small dynamic symbolic executor for the real openleadr sources."""
