"""Commands and argument parsing: enough to run the command line of DeDop in the same process."""
import argparse
import sys
from abc import ABCMeta, abstractmethod


class CommandError(Exception):
    pass


class _Exit(Exception):
    def __init__(self, status, message):
        self.status, self.message = status, message


class _Parser(argparse.ArgumentParser):
    def exit(self, status=0, message=None):
        raise _Exit(status, message)


class Command(metaclass=ABCMeta):
    @classmethod
    def new_monitor(cls):
        # cate has its own copy of this class
        from dedop.util.monitor import ConsoleMonitor
        return ConsoleMonitor(stay_in_line=True, progress_bar_size=80)

    @classmethod
    def name(cls):
        raise NotImplementedError

    @classmethod
    def parser_kwargs(cls):
        return {}

    @classmethod
    def configure_parser(cls, parser):
        pass

    @abstractmethod
    def execute(self, command_args):
        pass


class SubCommandCommand(Command, metaclass=ABCMeta):
    @classmethod
    def configure_parser(cls, parser):
        parser.set_defaults(sub_command_parser=parser)
        subparsers = parser.add_subparsers(metavar='COMMAND', help='One of the following commands.')
        cls.configure_parser_and_subparsers(parser, subparsers)

    @classmethod
    def configure_parser_and_subparsers(cls, parser, subparsers):
        raise NotImplementedError

    def execute(self, command_args):
        command_args.sub_command_parser.print_help()


def _make_parser(name, description, version, command_classes, license_text=None, docs_url=None):
    parser = _Parser(prog=name, description=description)
    parser.add_argument('--version', action='version', version='%s %s' % (name, version))
    parser.add_argument('--traceback', action='store_true', dest='traceback_mode')
    if license_text:
        parser.add_argument('--license', action='store_true')
    if docs_url:
        parser.add_argument('--docs', action='store_true')
    subparsers = parser.add_subparsers(dest='command_name', metavar='COMMAND')
    for c in command_classes:
        p = subparsers.add_parser(c.name(), **c.parser_kwargs())
        c.configure_parser(p)
        p.set_defaults(command_class=c)
    return parser


def run_main(name, description, version, command_classes, license_text=None, docs_url=None, error_message_trimmer=None,
             args=None):
    if args is None:
        args = sys.argv[1:]
    parser = _make_parser(name, description, version, command_classes, license_text=license_text, docs_url=docs_url)
    status, message = 0, None
    try:
        a = parser.parse_args(args)
        if getattr(a, 'command_class', None):
            a.command_class().execute(a)
        else:
            parser.print_help()
    except _Exit as e:
        status, message = e.status, e.message
    except CommandError as e:
        status, message = 1, '%s: error: %s' % (name, e)
    except Exception as e:
        status, message = 3, '%s: error: %s: %s' % (name, type(e).__name__, e)
    if message:
        (sys.stderr if status else sys.stdout).write(message.rstrip('\n') + '\n')
    return status
