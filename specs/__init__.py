__version__ = '1.2.1'
