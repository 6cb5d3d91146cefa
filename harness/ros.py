"""Stand-ins for what the bridge uses of ROS: topics, latched, with queues.
Messages are copied when they are published (ROS 1) or when they are made (ROS 2),
callbacks run when the subscriber is spun."""
import sys, types, array
import numpy as np

CODE = dict(Bool="b", Int32="i", Float32="f", Float64="d", Int32MultiArray="i", Float32MultiArray="f", Float64MultiArray="d")

class Message:
    def __init__(s, data=None, layout=None): s.data = data if data is not None else ([] if s.many else 0)
    def __setattr__(s, k, v):
        object.__setattr__(s, k, v)
        if k == "data": object.__setattr__(s, "made", s.copy())
    def copy(s):
        try: return array.array(s.code, s.data) if s.many else array.array(s.code, [s.data])
        except Exception as e: return e
msgs = types.ModuleType("std_msgs.msg")
for n, c in CODE.items(): setattr(msgs, n, type(n, (Message,), dict(code=c, many=n.endswith("Array"))))

class Broker:
    def __init__(s): s.last, s.subs = {}, []
    def name(s, n): return n[3:] if n.startswith("to_") else n      # (the receiving side is another machine: its names are remapped)
    def publish(s, topic, cls, data, depth):
        if isinstance(data, Exception): raise data
        k = (s.name(topic), cls.__name__); s.last[k] = (s.last.get(k, []) + [data])[-depth:]
        for u in s.subs:
            if u.key == k: u.queue = (u.queue + [data])[-u.depth:]
    def live(s, owner): return len([u for u in s.subs if u.owner is owner])
broker = Broker()
owner = None        # whoever makes publishers and subscribers at the moment

class Pub:
    def __init__(s, topic, cls, depth, latch, ros2): s.topic, s.cls, s.depth, s.latch, s.ros2, s.on = topic, cls, depth, latch, ros2, True; s.b = broker
    def publish(s, m):
        if type(m) is not s.cls: raise TypeError("wrong message")
        if s.on: s.b.publish(s.topic, s.cls, m.made if s.ros2 else m.copy(), s.depth if s.ros2 else 1)
    def unregister(s): s.on = False
    def destroy(s): s.on = False

class Sub:
    def __init__(s, topic, cls, callback, depth):
        s.b = broker; s.key = (s.b.name(topic), cls.__name__); s.cls, s.callback, s.depth, s.owner = cls, callback, depth, owner
        s.queue = list(s.b.last.get(s.key, []))[-depth:]; s.b.subs.append(s)
    def unregister(s):
        if s in s.b.subs: s.b.subs.remove(s)
    destroy = unregister
    def spin(s):
        """calls back for everything that has arrived"""
        q, s.queue = s.queue, []
        for d in q:
            m = s.cls(); m.data = d if s.cls.many else d[0]
            try: s.callback(m)
            except Exception: pass          # (ROS logs it)

rospy = types.ModuleType("rospy")
rospy.Publisher = lambda name, data_class, queue_size=None, latch=False, **k: Pub(name, data_class, queue_size, latch, False)
rospy.Subscriber = lambda name, data_class, callback=None, queue_size=None, tcp_nodelay=False, **k: Sub(name, data_class, callback, queue_size)
class Node:
    def create_publisher(s, msg_type, topic, qos_profile): return Pub(topic, msg_type, qos_profile.depth, True, True)
    def create_subscription(s, msg_type, topic, callback, qos_profile, raw=False): return Sub(topic, msg_type, callback, qos_profile.depth)
class Any:
    def __getattr__(s, k): return k
rclpy = types.ModuleType("rclpy"); rclpy.node = types.ModuleType("rclpy.node"); rclpy.node.Node = Node
qos = rclpy.qos = types.ModuleType("rclpy.qos")
qos.QoSProfile = lambda depth=10, **k: types.SimpleNamespace(depth=depth, **k)
for n in ("ReliabilityPolicy", "DurabilityPolicy", "HistoryPolicy", "LivelinessPolicy"): setattr(qos, n, Any())

def install(sleep):
    std = types.ModuleType("std_msgs"); std.msg = msgs; ps = types.ModuleType("perf_sleep"); pp = types.ModuleType("perf_sleep.pyperfsleep"); ps.pyperfsleep = pp
    class PerfSleep:
        @staticmethod
        def thread_sleep(ns): sleep(ns * 1e-9)
        @staticmethod
        def clock_sleep(ns): sleep(ns * 1e-9)
    pp.PerfSleep = PerfSleep
    sys.modules.update({"std_msgs": std, "std_msgs.msg": msgs, "rospy": rospy, "rclpy": rclpy, "rclpy.node": rclpy.node, "rclpy.qos": qos, "perf_sleep": ps, "perf_sleep.pyperfsleep": pp})
