"""The Python client of /repo talking to the compiled Rust backend of /repo: requests and replies are passed as JSON."""
import math

from google.protobuf.descriptor import FieldDescriptor

from vlib import fakegrpc
from vlib.core import Violation
from vlib.rustlib import backend, camel, snake
from ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelinePart2WithCallback, _create_simple_get_context_value_part
from ficus.grpc_pipelines.models.backend_service_pb2 import GrpcGetContextValueRequest, GrpcGetContextValueResult, GrpcPipelinePartExecutionResult
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcContextKey, GrpcPipelinePartBase
from ficus.grpc_pipelines.models.util_pb2 import GrpcGuid


def _empty(msg):
    return msg.full_name == 'google.protobuf.Empty'


def encode(msg):
    """message -> the JSON form of the generated Rust struct"""
    d = msg.DESCRIPTOR
    out = {}
    for f in d.fields:
        if f.containing_oneof is not None:
            continue
        if f.label == FieldDescriptor.LABEL_REPEATED:
            v = getattr(msg, f.name)
            out[snake(f.name)] = [encode(x) for x in v] if f.message_type else list(v)
        elif f.message_type:
            out[snake(f.name)] = encode(getattr(msg, f.name)) if msg.HasField(f.name) else None
        else:
            out[snake(f.name)] = getattr(msg, f.name)
    for o in d.oneofs:
        w = msg.WhichOneof(o.name)
        if w is None:
            out[snake(o.name)] = None
        else:
            f = d.fields_by_name[w]
            v = getattr(msg, w)
            out[snake(o.name)] = {camel(w): None if f.message_type and _empty(f.message_type) else encode(v) if f.message_type else v}
    return out


def decode(data, msg):
    """the JSON form of the generated Rust struct -> message"""
    d = msg.DESCRIPTOR
    for f in d.fields:
        if f.containing_oneof is not None:
            continue
        v = data.get(snake(f.name))
        if f.label == FieldDescriptor.LABEL_REPEATED:
            for x in v:
                if f.message_type:
                    decode(x, getattr(msg, f.name).add())
                else:
                    getattr(msg, f.name).append(math.nan if x is None else x)
        elif f.message_type:
            if v is not None:
                getattr(msg, f.name).SetInParent()
                decode(v, getattr(msg, f.name))
        else:
            setattr(msg, f.name, math.nan if v is None else v)
    for o in d.oneofs:
        v = data.get(snake(o.name))
        if v is None:
            continue
        (name, inner), = v.items()
        f = next(f for f in o.fields if camel(f.name) == name)
        if f.message_type:
            getattr(msg, f.name).SetInParent()
            if not _empty(f.message_type):
                decode(inner, getattr(msg, f.name))
        else:
            setattr(msg, f.name, math.nan if inner is None else inner)
    return msg


class RealBackend(fakegrpc.Backend):
    """a channel to the compiled backend; keeps requests, replies and the outcome of drops"""

    def __init__(self, random=(), what=''):
        super().__init__(None)
        self.random, self.what = list(random), what
        self.replies = []
        self.dropped = []

    def execute(self, request):
        self.requests.append(request)
        backend()('last_panic')
        got = backend()('execute', request=encode(request), random=self.random)
        messages = []
        for g in got:
            if 'ok' not in g:
                raise Violation(f'the backend replied with a status instead of a result: {g} {self.what}')
            messages.append(decode(g['ok'], GrpcPipelinePartExecutionResult()))
        self.replies.append(messages)
        if not messages or messages[-1].WhichOneof('result') != 'finalResult':
            panic = backend()('last_panic')
            raise Violation(f'the stream of the backend ended without a final result (panic: {panic}) {self.what}')
        if any(m.WhichOneof('result') == 'finalResult' for m in messages[:-1]):
            raise Violation(f'messages after the final result {self.what}')
        return iter([GrpcPipelinePartExecutionResult.FromString(m.SerializeToString()) for m in messages])

    def drop(self, guid):
        return 'ok' in backend()('drop', request=encode(GrpcGuid(guid=guid)))

    def _drop(self, guid):
        self.dropped.append(self.drop(guid))


class _Drops(list):
    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def append(self, guid):
        super().append(guid)
        self.owner._drop(guid)


class Probe(PipelinePart2WithCallback):
    """asks for values of the context of the backend and keeps them"""

    def __init__(self, key, seen, tag=None):
        super().__init__()
        self.key, self.seen, self.tag = key, seen, tag

    def to_grpc_part(self):
        return GrpcPipelinePartBase(simpleContextRequestPart=_create_simple_get_context_value_part(self.uuid, self.key))

    def execute_callback(self, values):
        self.seen.append((self.tag if self.tag is not None else self.key, values[self.key]))


class Spy:
    """wraps a part with a callback: keeps the values instead of executing the callback"""

    def __new__(cls, part, seen, tag=None):
        part.execute_callback = lambda values: seen.append((tag, dict(values)))
        return part


def run(parts, initial=None, random=(), what='', real=None):
    """executes the parts with the client on the compiled backend; returns (final result, the backend object, printed text)"""
    real = real or RealBackend(random, what)
    real.drops = _Drops(real)
    with fakegrpc.played_by(real), fakegrpc.printed() as out:
        last = Pipeline2(*parts).execute(dict(initial or {}))
    return last, real, out.getvalue()


def success(last, what=''):
    if last.finalResult.WhichOneof('executionResult') != 'success':
        raise Violation(f'the execution failed: {last.finalResult.error!r} {what}')


def get_value(guid, key):
    r = backend()('get', request=encode(GrpcGetContextValueRequest(executionId=GrpcGuid(guid=guid), key=GrpcContextKey(name=key))))
    return decode(r['ok'], GrpcGetContextValueResult()) if 'ok' in r else r


def names_log(value):
    return [list(t.events) for t in value.names_log.log.traces]
