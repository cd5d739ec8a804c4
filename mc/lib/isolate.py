"""Runs a function in a forked copy of the process, so that nothing it does to objects, classes or modules stays behind."""
import os
import pickle
import signal
import traceback


class Crashed(Exception):
    pass


def isolated(fn, *args, timeout=50):
    """Return fn(*args), executed in a copy of this process (the result must be picklable)."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                blob = pickle.dumps((True, fn(*args)))
            except BaseException as e:
                blob = pickle.dumps((False, ''.join(traceback.format_exception(e)[-6:])))
            with os.fdopen(w, 'wb') as f:
                f.write(blob)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            blob = f.read()
    finally:
        os.waitpid(pid, 0)
    if not blob:
        raise Crashed('the process ended without an answer')
    good, result = pickle.loads(blob)
    if not good:
        raise Crashed(result)
    return result


class Zygote:
    """A process that makes objects once and calls fn(objects, *args) in copies of itself: every call finds the objects as made."""

    def __init__(self, make, fn):
        request_r, self.request = os.pipe()
        self.response, response_w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(request_r)
            os.close(response_w)
            self.request, self.response = os.fdopen(self.request, 'wb'), os.fdopen(self.response, 'rb')
            return
        try:
            os.dup2(request_r, 3)
            os.dup2(response_w, 4)
            os.closerange(5, 1024)  # the process ends when its parent does
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            with os.fdopen(3, 'rb') as requests, os.fdopen(4, 'wb') as responses:
                try:
                    made, objects = True, make()
                except BaseException as e:
                    made, objects = False, ''.join(traceback.format_exception(e)[-6:])
                while True:
                    args = pickle.load(requests)
                    try:
                        answer = (True, isolated(fn, objects, *args)) if made else (False, objects)
                    except BaseException as e:
                        answer = False, f'{type(e).__name__}: {e}'
                    pickle.dump(answer, responses)
                    responses.flush()
        except EOFError:
            pass
        finally:
            os._exit(0)

    def __call__(self, *args):
        pickle.dump(args, self.request)
        self.request.flush()
        good, result = pickle.load(self.response)
        if not good:
            raise Crashed(result)
        return result
