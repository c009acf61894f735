from fastapi import Response
class JSONResponse(Response):
    pass
class PlainTextResponse(Response):
    pass
