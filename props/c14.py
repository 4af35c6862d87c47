from props.rules import run  # noqa
