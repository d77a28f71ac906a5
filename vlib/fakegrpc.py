"""A backend played by the harness: a stand-in for the gRPC channel which records what the client sends and streams a script of replies."""
import contextlib
import io

import grpc

from ficus.grpc_pipelines.models.backend_service_pb2 import (GrpcPipelineExecutionRequest, GrpcPipelineFinalResult,
                                                             GrpcPipelinePartExecutionResult, GrpcPipelinePartLogMessage,
                                                             GrpcPipelinePartResult, GrpcContextValueWithKeyName)
from ficus.grpc_pipelines.models.util_pb2 import GrpcGuid, GrpcUuid
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcContextValue

DEFAULT_ADDRESS = 'localhost:8080'


class TransportError(grpc.RpcError):
    pass


# ------------------------------------------------------------------------------------------------ messages
def m_log(text):
    return GrpcPipelinePartExecutionResult(logMessage=GrpcPipelinePartLogMessage(message=text))


def m_result(uuid, values):
    """values: list of (key name, GrpcContextValue)"""
    return GrpcPipelinePartExecutionResult(pipelinePartResult=GrpcPipelinePartResult(
        uuid=GrpcUuid(uuid=uuid), contextValues=[GrpcContextValueWithKeyName(key_name=k, value=v) for k, v in values]))


def m_success(guid):
    return GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(success=GrpcGuid(guid=guid)))


def m_error(text):
    return GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(error=text))


def m_empty():
    return GrpcPipelinePartExecutionResult()


def v_str(s):
    return GrpcContextValue(string=s)


def v_uint(n):
    return GrpcContextValue(uint32=n)


# ------------------------------------------------------------------------------------------------ the request, as the backend reads it
def callback_parts(grpc_pipeline):
    """(uuid, requested key names) of the parts awaiting a callback, in pre-order of the request, nested pipelines included"""
    out = []
    for base in grpc_pipeline.parts:
        which = base.WhichOneof('part')
        if which == 'simpleContextRequestPart':
            p = base.simpleContextRequestPart
            out.append((p.frontendPartUuid.uuid, [p.key.name]))
        elif which == 'complexContextRequestPart':
            p = base.complexContextRequestPart
            out.append((p.frontendPartUuid.uuid, [k.name for k in p.keys]))
            out.extend(_nested(p.beforePipelinePart))
        elif which == 'defaultPart':
            out.extend(_nested(base.defaultPart))
    return out


def _nested(part):
    out = []
    for kv in part.configuration.configurationParameters:
        if kv.value.WhichOneof('contextValue') == 'pipeline':
            out.extend(callback_parts(kv.value.pipeline))
    return out


# ------------------------------------------------------------------------------------------------ channel
class Backend:
    """script: function(request) -> list of messages; an exception in the list is raised by the stream."""

    def __init__(self, script):
        self.script = script
        self.addresses = []
        self.requests = []
        self.drops = []
        self.open_channels = 0
        self.opened = 0

    def channel(self, target, options=None, *a, **kw):
        self.addresses.append(target)
        return _Channel(self)

    def execute(self, request):
        self.requests.append(request)
        return iter(_stream(self.script(request)))


def _stream(messages):
    for m in messages:
        if isinstance(m, BaseException):
            raise m
        # what the client gets has been over the wire
        yield GrpcPipelinePartExecutionResult.FromString(m.SerializeToString())


class _Channel:
    def __init__(self, backend):
        self.backend = backend
        backend.open_channels += 1
        backend.opened += 1
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self, *a):
        if not self.closed:
            self.closed = True
            self.backend.open_channels -= 1

    def _call(self, path, request_serializer):
        def call(request, *a, **kw):
            if self.closed:
                raise ValueError('Cannot invoke RPC on closed channel!')
            data = request_serializer(request)
            if path.endswith('/ExecutePipeline'):
                return self.backend.execute(GrpcPipelineExecutionRequest.FromString(data))
            if path.endswith('/DropExecutionResult'):
                self.backend.drops.append(GrpcGuid.FromString(data).guid)
                return None
            raise TransportError(f'unexpected call {path}')

        return call

    def unary_stream(self, method, request_serializer=None, response_deserializer=None, *a, **kw):
        return self._call(method, request_serializer)

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, *a, **kw):
        return self._call(method, request_serializer)


@contextlib.contextmanager
def played_by(backend):
    """the client talks to this backend"""
    import ficus.grpc_pipelines.grpc_pipelines as gp
    saved = grpc.insecure_channel
    in_module = getattr(gp, 'insecure_channel', None)
    grpc.insecure_channel = backend.channel
    if in_module is not None:
        gp.insecure_channel = backend.channel
    try:
        yield backend
    finally:
        grpc.insecure_channel = saved
        if in_module is not None:
            gp.insecure_channel = in_module


@contextlib.contextmanager
def printed():
    """what is printed, as a list of complete text"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out
