from fastapi import Request
