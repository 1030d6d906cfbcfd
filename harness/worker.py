"""Runs tasks against the code under test, one JSON line per task.

    worker.py TASKS START OUT

TASKS is a JSON file [[name, args...], ...]; results are appended to OUT as
they come, so that the parent sees where a call hangs or dies."""
import json
import sys

import observe
import treeops  # noqa: adds tasks
import session  # noqa: adds tasks
import facade  # noqa: adds tasks
import growth  # noqa: adds tasks


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    out = open(sys.argv[3], 'a')
    for t in tasks[int(sys.argv[2]):]:
        try:
            r = ['ok', getattr(observe, 'task_' + t[0])(*t[1:])]
        except BaseException as e:      # noqa: whatever the code under test does
            r = ['error', '%s: %s' % (type(e).__name__, str(e)[:300])]
        out.write(json.dumps(r, separators=(',', ':')) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
