"""setup_cmd: builds the front end."""
from .frontend import tool
print(tool())
