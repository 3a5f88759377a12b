"""Repository-specific static analysis of eclipse/paho.mqtt.testing (standard library only)."""
