"""setup_cmd: builds the extractor and the shared caches."""
import facts

facts.ensure_tool()
print('extractor ready')
